"""C03: Apple partition map."""
from checks.common import Img, num

EXPLAIN = ("The value graph of APM parsing is compared with the graph of a specification that locates the map entries by byte "
           "offsets.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.disk.schemes.apm import APM
from dissect.volume.exceptions import DiskError
from vfa import u, raw


def code_apm(fh: BinaryIO, sector_size: int):
    fh.seek(0)
    a = APM(fh, sector_size)
    ps = a.partitions
    return {
        "number": [p.number for p in ps],
        "offset": [p.offset for p in ps],
        "size": [p.size for p in ps],
        "type": [p.type for p in ps],
        "name": [p.name for p in ps],
        "disk": [p.disk is a for p in ps],
    }


def ref_apm(fh: BinaryIO, sector_size: int):
    at = 0
    if raw(fh, 0, 2) == b"ER":
        at = u(fh, 2, 2, ">")
    if raw(fh, at, 2) != b"PM":
        raise DiskError()
    out = []
    for i in range(u(fh, at + 4, 4, ">")):
        e = at + 512 * i
        out.append((i + 1, u(fh, e + 8, 4, ">") * sector_size, u(fh, e + 12, 4, ">") * sector_size,
                    raw(fh, e + 48, 32).rstrip(b"\\x00").decode(), raw(fh, e + 16, 32).rstrip(b"\\x00").decode()))
    return {
        "number": [r[0] for r in out],
        "offset": [r[1] for r in out],
        "size": [r[2] for r in out],
        "type": [r[3] for r in out],
        "name": [r[4] for r in out],
        "disk": [True for r in out],
    }


def code_plain(fh: BinaryIO):
    fh.seek(0)
    ps = APM(fh).partitions
    return {"number": [p.number for p in ps], "offset": [p.offset for p in ps]}


def ref_plain(fh: BinaryIO):
    r = ref_apm(fh, 512)
    return {"number": r["number"], "offset": r["offset"]}
'''


def _fh(rng, w):
    img = Img(w, endian="big")
    if rng.random() < 0.15:
        return img.h
    at = 0
    if rng.random() < 0.5:
        img.fill(0, 4, rng)
        img.blob(0, b"ER")
        at = rng.choice((512, 1024, 2048, 4096, 513))
        img.put(2, at, 2)
    count = rng.choice((1, 2, 3, 4, 6)) if rng.random() < 0.96 else rng.choice((17, 33, 64, 70))
    for i in range(count):
        e = at + 512 * i
        img.blob(e, b"PM" if rng.random() < 0.9 or i == 0 else rng.randbytes(2))
        img.put(e + 4, count if i == 0 or rng.random() < 0.7 else rng.randrange(9), 4)
        img.put(e + 8, num(rng), 4)
        img.put(e + 12, num(rng), 4)
        for k in (16, 48):
            t = "".join(rng.choice("AbcdHFS_+ \u00e9") for _ in range(rng.choice((0, 1, 5, 9, 16)))).encode()[:32]
            if rng.random() < 0.15:
                t = bytes(rng.choice(b"Apple") for _ in range(32))
            elif rng.random() < 0.1:
                t = t[:8].decode(errors="ignore").encode() + b"\x00" + b"x"
            img.blob(e + k, t.ljust(32, b"\x00"))
    return img.h


DOMAINS = {"fh": _fh, "sector_size": [512, 2048, 4096]}
PAIRS = {"plain": {"samples": 60, "domains": {"sector_size": [512], "start": [0]}}, "apm": {"samples": 300, "maxit": 100}}
