"""C01: MBR partition lists."""
EXPLAIN = ("The value graph of MBR parsing (entry list, offsets, sizes, numbers, refusals) is compared with the graph of a "
           "specification that walks the tables by byte offsets.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.disk.schemes.mbr import MBR
from dissect.volume.exceptions import DiskError
from vfa import u, raw


def code_mbr(fh: BinaryIO, sector_size: int, start: int):
    fh.seek(start)
    m = MBR(fh, sector_size)
    ps = m.partitions
    return {
        "number": [p.number for p in ps],
        "offset": [p.offset for p in ps],
        "size": [p.size for p in ps],
        "type": [p.type for p in ps],
        "flags": [p.flags for p in ps],
        "disk": [p.disk is m for p in ps],
    }


def table(fh, at, number, first, ss, seen, out):
    for slot in range(4):
        entry = at + 446 + 16 * slot
        kind = u(fh, entry + 4, 1)
        if kind == 0:
            continue
        lba = u(fh, entry + 8, 4)
        if kind == 5 or kind == 15 or kind == 0x85:
            if first:
                where = first + lba * ss
            else:
                where = at + lba * ss
                first = where
            if where in seen:
                continue
            seen.add(where)
            table(fh, where, number + slot, first, ss, seen, out)
        else:
            out.append((number + slot + 1, at + lba * ss, u(fh, entry + 12, 4) * ss, kind, u(fh, entry, 1)))


def ref_mbr(fh: BinaryIO, sector_size: int, start: int):
    if u(fh, start + 510, 2) != 0xAA55:
        raise DiskError()
    sig = raw(fh, start + 3, 8)
    if (b"MSDOS" in sig or b"MSWIN" in sig or b"NTFS" in sig or b"FAT" in sig or b"EXFAT" in sig
            or b"-FVE-FS-" in sig or b"SYSLINUX" in sig):
        raise DiskError()
    if raw(fh, start + 18, 20) == b"Hit Esc for .altboot":
        raise DiskError()
    if raw(fh, start + 168, 6) == b"\\r\\nQNX ":
        raise DiskError()
    out = []
    table(fh, start, 0, None, sector_size, {start}, out)
    return {
        "number": [r[0] for r in out],
        "offset": [r[1] for r in out],
        "size": [r[2] for r in out],
        "type": [r[3] for r in out],
        "flags": [r[4] for r in out],
        "disk": [True for r in out],
    }


def code_plain(fh: BinaryIO):
    fh.seek(0)
    ps = MBR(fh).partitions
    return {"number": [p.number for p in ps], "offset": [p.offset for p in ps]}


def ref_plain(fh: BinaryIO):
    r = ref_mbr(fh, 512, 0)
    return {"number": r["number"], "offset": r["offset"]}
'''


def _fh(rng, w):
    """Half of the streams carry tables that are linked to each other, one of the tables often being shared."""
    from vfa.evalr import HVal
    h = HVal(("sym", "fh"))
    if rng.random() < 0.3:
        return h

    def put(at, v, n):
        for i, x in enumerate(v.to_bytes(n, "little")):
            w.mem[(h.key, at + i)] = x

    ss, at = w.sym("sector_size", ("int",)), w.sym("start", ("int",))
    base, depth, free = None, rng.choice((0, 1, 2, 2, 3, 3)), 8
    put(at + 510, 0xAA55, 2)
    for i in (*range(3, 40), *range(160, 180)):
        put(at + i, 0, 1)
    if rng.random() < 0.25:
        where, text = rng.choice((
            (3, b"MSDOS5.0"), (3, b"MSWIN4.1"), (3, b"NTFS    "), (3, b"EXFAT   "), (3, b"-FVE-FS-"), (3, b"SYSLINUX"), (3, b"mkfs.fat"), (5, b"NTFS"),
            (7, b"NTFS"), (8, b"FAT"), (6, b"MSDOS"), (2, b"-FVE-FS-"), (4, b"SYSLINUX"), (8, b"NTFS"), (9, b"FAT"), (11, b"FAT"), (0, b"\xeb\x3cFAT"),
            (18, b"Hit Esc for .altboot"), (17, b"Hit Esc for .altboot"), (19, b"Hit Esc for .altboot"), (18, b"Hit Esc for .altboox"),
            (18, b"Xit Esc for .altboot"), (168, b"\r\nQNX "), (167, b"\r\nQNX "), (169, b"\r\nQNX "), (168, b"\r\nQNXv"), (168, b"x\nQNX "), (1, b"FAT")))
        for i, x in enumerate(text):
            put(at + where + i, x, 1)
    for level in range(depth + 1):
        slots = [rng.choice((0, 0, 7, 7, 0x83, 0x82, 0xEE, rng.randrange(256))) for _ in range(4)]
        slots = [0x83 if k in (5, 15, 0x85) else k for k in slots]
        links = []
        if level < depth:
            links = rng.sample(range(4), rng.choice((1, 1, 1, 2)))
        following = None
        for i in range(4):
            kind, lba = slots[i], rng.randrange(1, 1 << 20)
            if i in links:
                kind, lba = rng.choice((5, 5, 15, 0x85)), free
                free += rng.randrange(1, 9)
                if rng.random() < 0.08:
                    lba = 0
                target = (base if base else at) + lba * ss
                if not base:
                    base = target
                if i == links[0]:
                    following = target
                elif target != following:
                    for j in range(4):
                        put(target + 446 + 16 * j + 4, rng.choice((0, 0, 7)), 1)
            put(at + 446 + 16 * i + 4, kind, 1)
            put(at + 446 + 16 * i + 8, lba, 4)
        at = following
    return h


DOMAINS = {"fh": _fh, "sector_size": [512, 4096, 1024], "start": [0, 512, 5120]}
PAIRS = {"plain": {"samples": 60, "domains": {"sector_size": [512], "start": [0]}}, "mbr": {"samples": 400}}
