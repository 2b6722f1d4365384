"""C02: GPT partition lists."""
from checks.common import Img, boot, num

EXPLAIN = ("The value graph of GPT parsing (protective MBR walk, header, entry array) is compared with the graph of a "
           "specification that locates header and entries by byte offsets.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from uuid import UUID
from dissect.volume.disk.schemes.mbr import MBR
from dissect.volume.disk.schemes.gpt import GPT
from dissect.volume.exceptions import DiskError
from vfa import u, raw


def code_gpt(fh: BinaryIO, sector_size: int):
    fh.seek(0)
    g = GPT(fh, sector_size)
    ps = g.partitions
    return {
        "number": [p.number for p in ps],
        "offset": [p.offset for p in ps],
        "size": [p.size for p in ps],
        "type": [p.type for p in ps],
        "flags": [p.flags for p in ps],
        "name": [p.name for p in ps],
        "guid": [p.guid for p in ps],
        "stream": [p.disk.fh is fh for p in ps],
    }


def listing(fh, sector_size, inclusive):
    fh.seek(0)
    out = []
    header = None
    done = False
    for p in MBR(fh, sector_size).partitions:
        if p.type == 0xEE and header is None:
            header = p.offset
            if raw(fh, header, 8) != b"EFI PART":
                raise DiskError()
    if header is None:
        raise DiskError()
    array = u(fh, header + 72, 8) * sector_size
    count = u(fh, header + 80, 4)
    width = u(fh, header + 84, 4)
    fh.seek(0)
    for p in MBR(fh, sector_size).partitions:
        if p.type != 0xEE:
            out.append((p.number, p.offset, p.size, p.type, p.flags, p.name, p.guid))
        elif not done:
            done = True
            for slot in range(count):
                e = array + slot * width
                first = u(fh, e + 32, 8)
                if first != 0:
                    name = raw(fh, e + 56, 72).decode("utf-16-le", "ignore").split("\\x00")[0].strip("\\uffff")
                    out.append((slot + 1, first * sector_size, (u(fh, e + 40, 8) - first + inclusive) * sector_size,
                                UUID(bytes_le=raw(fh, e, 16)), u(fh, e + 48, 8), name, UUID(bytes_le=raw(fh, e + 16, 16))))
    return {
        "number": [r[0] for r in out],
        "offset": [r[1] for r in out],
        "size": [r[2] for r in out],
        "type": [r[3] for r in out],
        "flags": [r[4] for r in out],
        "name": [r[5] for r in out],
        "guid": [r[6] for r in out],
        "stream": [True for r in out],
    }


def ref_gpt(fh: BinaryIO, sector_size: int):
    return listing(fh, sector_size, 1)


def dev_size(fh: BinaryIO, sector_size: int):
    return listing(fh, sector_size, 0)


def code_plain(fh: BinaryIO):
    fh.seek(0)
    ps = GPT(fh).partitions
    return {"number": [p.number for p in ps], "offset": [p.offset for p in ps]}


def ref_plain(fh: BinaryIO):
    r = ref_gpt(fh, 512)
    return {"number": r["number"], "offset": r["offset"]}
'''


def _fh(rng, w):
    img = Img(w)
    if rng.random() < 0.15:
        return img.h
    ss = w.sym("sector_size", ("int",))
    at = rng.choice((1, 1, 1, 2, 5))
    kinds = rng.choice(((0xEE,), (0xEE,), (7, 0xEE), (0xEE, 7, 0x83), (0xEE, 0xEE), (0, 0x83, 0xEE, 0xEE), (7,)))
    boot(img, rng, 0, [(k, (at if k == 0xEE else num(rng)) if k != 0xEE or j == kinds.index(0xEE) else rng.randrange(9), num(rng), rng.choice((0, 0x80)))
                       for j, k in enumerate(kinds)])
    head = at * ss
    for i in range(8, 92, 4):
        img.put(head + i, rng.choice((0, 0, 1, 2, 5, 92)), 4)
    img.blob(head, b"EFI PART" if rng.random() < 0.95 else b"EFI PARX")
    array, count, width = rng.choice((2, 2, 7, 40)) + at, rng.choice((0, 1, 2, 3, 4, 8)) if rng.random() < 0.97 else rng.choice((128, 129, 140)), rng.choice((128, 128, 256, 136))
    img.put(head + 72, array, 8)
    img.put(head + 80, count, 4)
    img.put(head + 84, width, 4)
    for i in range(count + 2):
        e = array * ss + i * width
        if i > 4 and count > 100 and i not in (count - 1, count, 127, 128):
            img.zero(e, 128)
            continue
        img.fill(e, 56, rng)
        first = rng.choice((0, 0, num(rng, 40), num(rng, 64)))
        img.put(e + 32, first, 8)
        img.put(e + 40, first + num(rng, 32) if rng.random() < 0.9 else num(rng, 64), 8)
        if rng.random() < 0.2:
            img.zero(e, 16)
        name = "".join(rng.choice("AbE \u20ac\uffff\x00") for _ in range(rng.choice((0, 1, 4, 20, 36))))
        if rng.random() < 0.1:
            name = name[:9] + rng.choice(("\ud800", "\udc00", "\ud83d\ude00", "\ude00\ud83d")) + name[9:]
        img.blob(e + 56, (name + rng.choice(("", "\x00tail"))).encode("utf-16-le", "surrogatepass")[:72].ljust(72, rng.choice((b"\x00", b"\x00", b"\xff"))))
    return img.h


DOMAINS = {"fh": _fh, "sector_size": [512, 4096]}
PAIRS = {"plain": {"samples": 60, "domains": {"sector_size": [512], "start": [0]}}, "gpt": {"samples": 300, "maxit": 160, "known": {"dev_size": (
    "gpt-last-lba-inclusive", "GPT._partitions: the last LBA of an entry is inclusive, but the partition size is "
    "(last - first) * sector size, one sector short; the existing tests pin this size")}}}
