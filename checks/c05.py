"""C05: scheme detection and nested BSD labels."""
EXPLAIN = ("The value graph of opening a disk, with the four scheme parsers as opaque objects that may refuse, is compared with "
           "the graph of a specification of the detection order and of the replacement of BSD containers.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from uuid import UUID
from dissect.util.stream import RangeStream
from dissect.volume.disk.disk import Disk
from dissect.volume.disk.schemes import APM, BSD, GPT, MBR
from dissect.volume.exceptions import DiskError
from vfa import u, raw


def code_disk(fh: BinaryIO, sector_size: int, start: int):
    fh.seek(start)
    d = Disk(fh, sector_size)
    return {
        "fh": d.fh,
        "sector_size": d.sector_size,
        "partitions": [p for p in d.partitions],
        "scheme": d.scheme,
        "serial": d.serial,
    }


def code_default(fh: BinaryIO, start: int):
    fh.seek(start)
    d = Disk(fh)
    return {"sector_size": d.sector_size, "partitions": [p for p in d.partitions]}


def detect(fh, sector_size, start):
    fh.seek(start)
    try:
        return GPT(fh, sector_size)
    except Exception:
        pass
    fh.seek(start)
    try:
        return MBR(fh, sector_size)
    except Exception:
        pass
    fh.seek(start)
    try:
        return APM(fh, sector_size)
    except Exception:
        pass
    fh.seek(start)
    try:
        return BSD(fh, sector_size)
    except Exception:
        raise DiskError()


CONTAINERS = (0xA5, 0xA6, 0xA9, 0x6C, UUID("9D087404-1CA5-11DC-8817-01301BB8A9F5"),
              UUID("3D48CE54-1D16-11DC-8696-01301BB8A9F5"), UUID("516E7CB4-6ECF-11D6-8FF8-00022D09712B"))


def ref_disk(fh: BinaryIO, sector_size: int, start: int):
    scheme = detect(fh, sector_size, start)
    is_mbr = isinstance(scheme, MBR)
    serial = scheme.mbr.vol_no if is_mbr else None
    out = []
    last = scheme
    for p in scheme.partitions:
        if p.type in CONTAINERS:
            last = BSD(RangeStream(p.disk.fh, p.offset, p.size), sector_size)
            out += last.partitions
            serial = None
            is_mbr = False
        else:
            out.append(p)
    for p in out:
        if is_mbr and p.type == 0xEE:
            raise DiskError()
    return {
        "fh": fh,
        "sector_size": sector_size,
        "partitions": [p for p in out],
        "scheme": last,
        "serial": serial,
    }


def ref_default(fh: BinaryIO, start: int):
    r = ref_disk(fh, 512, start)
    return {"sector_size": 512, "partitions": r["partitions"]}
'''

DOMAINS = {"sector_size": [512, 4096, 1024], "start": [0, 512, 5120]}
S = "dissect.volume.disk.schemes."
CUT = [S + "gpt.GPT", S + "mbr.MBR", S + "apm.APM", S + "bsd.BSD"]
PAIRS = {"disk": {"samples": 400, "cut": CUT}, "default": {"samples": 150, "cut": CUT}}
