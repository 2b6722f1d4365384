"""C04: BSD disklabels."""
from checks.common import Img, num

EXPLAIN = ("The value graph of BSD disklabel parsing is compared with the graph of a specification that locates label and table "
           "by byte offsets, for 32- and 64-bit labels.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from uuid import UUID
from dissect.volume.disk.schemes.bsd import BSD
from dissect.volume.exceptions import DiskError
from vfa import u, raw


def code_bsd(fh: BinaryIO, sector_size: int, start: int):
    fh.seek(start)
    b = BSD(fh, sector_size)
    ps = b.partitions
    return {
        "number": [p.number for p in ps],
        "offset": [p.offset for p in ps],
        "size": [p.size for p in ps],
        "type": [p.type for p in ps],
        "guid": [p.guid for p in ps],
        "disk": [p.disk is b for p in ps],
    }


def ref_bsd(fh: BinaryIO, sector_size: int, start: int):
    at = start + sector_size
    magic = u(fh, at, 4)
    out = []
    if magic == 0x82564557:
        if u(fh, at + 132, 4) != 0x82564557:
            raise DiskError()
        table = at + 148
        base = u(fh, table + 2 * 16 + 4, 4)
        for slot in range(u(fh, at + 138, 2)):
            e = table + 16 * slot
            size = u(fh, e, 4)
            first = u(fh, e + 4, 4)
            fstype = u(fh, e + 12, 1)
            if slot != 2 and size != 0 and fstype != 0 and first >= base:
                out.append((slot + 1, (first - base) * sector_size, size * sector_size, fstype, None))
    elif magic == 0xC4464C59:
        table = at + 200
        for slot in range(u(fh, at + 12, 4)):
            e = table + 64 * slot
            first = u(fh, e, 8)
            size = u(fh, e + 8, 8)
            fstype = u(fh, e + 16, 1)
            if slot != 2 and fstype != 0 and not (first == 0 and size == 0):
                out.append((slot + 1, first, size, fstype, UUID(bytes_le=raw(fh, e + 48, 16))))
    else:
        raise DiskError()
    return {
        "number": [r[0] for r in out],
        "offset": [r[1] for r in out],
        "size": [r[2] for r in out],
        "type": [r[3] for r in out],
        "guid": [r[4] for r in out],
        "disk": [True for r in out],
    }


def code_plain(fh: BinaryIO):
    fh.seek(0)
    ps = BSD(fh).partitions
    return {"number": [p.number for p in ps], "offset": [p.offset for p in ps]}


def ref_plain(fh: BinaryIO):
    r = ref_bsd(fh, 512, 0)
    return {"number": r["number"], "offset": r["offset"]}
'''


def _fh(rng, w):
    img = Img(w)
    if rng.random() < 0.15:
        return img.h
    at = w.sym("start", ("int",)) + w.sym("sector_size", ("int",))
    count = rng.choice((1, 3, 4, 6, 8)) if rng.random() < 0.93 else rng.choice((9, 16, 17, 22, 26))
    fs = [0, 0, 1, 7, 10, 14, 22, 27, 30, rng.randrange(256)]
    img.fill(at, 200, rng)
    if rng.random() < 0.5:
        img.put(at, 0x82564557, 4)
        img.put(at + 132, 0x82564557 if rng.random() < 0.9 else 0x82564558, 4)
        img.put(at + 138, count, 2)
        base = num(rng, 20)
        for i in range(max(count, 3) + 1):
            e = at + 148 + 16 * i
            img.put(e, rng.choice((0, num(rng), num(rng))), 4)
            img.put(e + 4, base if i == 2 else max(0, base + rng.choice((0, 0, 1, -1, num(rng, 24), num(rng, 24)))), 4)
            img.put(e + 8, num(rng), 4)
            img.put(e + 12, rng.choice(fs), 1)
            img.fill(e + 13, 3, rng)
    else:
        img.put(at, 0xC4464C59, 4)
        img.put(at + 12, count, 4)
        for i in range(count + 1):
            e = at + 200 + 64 * i
            img.fill(e, 64, rng)
            img.put(e, rng.choice((0, 0, num(rng, 48))), 8)
            img.put(e + 8, rng.choice((0, 0, num(rng, 48))), 8)
            img.put(e + 16, rng.choice(fs), 1)
    return img.h


DOMAINS = {"fh": _fh, "sector_size": [512, 4096, 1024], "start": [0, 512, 5120]}
PAIRS = {"plain": {"samples": 60, "domains": {"sector_size": [512], "start": [0]}}, "bsd": {"samples": 400}}
