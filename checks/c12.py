"""C12: MD superblocks."""
EXPLAIN = ("The value graph of locating and decoding an MD superblock is compared with the graph of a specification that names "
           "the four places and every field by its byte offset.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.util import ts
from dissect.volume.md.md import MDPhysicalDisk
from vfa import u, raw, uuid, ssize, runs


def code_member(fh: BinaryIO):
    d = MDPhysicalDisk(fh)
    return {
        "set_uuid": d.set_uuid, "set_name": d.set_name, "events": d.events, "chunk_size": d.chunk_size,
        "chunk_sectors": d.chunk_sectors, "data_offset": d.data_offset, "data_size": d.data_size,
        "dev_number": d.dev_number, "device_uuid": d.device_uuid, "raid_disk": d.raid_disk, "creation": d.creation_time,
        "update": d.update_time, "level": d.level, "layout": d.layout, "raid_disks": d.raid_disks, "sectors": d.sectors,
        "fh": d.fh, "offset": d.offset, "size": d.size, "window": runs(d.open()),
        "component": d.sb.size,
    }


def place(fh):
    n = ssize(fh) // 512
    for at in (n // 128 * 128 - 128, (n - 16) // 8 * 8, 0, 8):
        if at >= 0 and len(raw(fh, at * 512, 12)) == 12 and u(fh, at * 512, 4) == 0xA92B4EFC:
            return at
    raise ValueError()


def when(v):
    return ts.from_unix_us(v % 2**40 * 1000000 + v // 2**40)


def ref_member(fh: BinaryIO):
    at = place(fh)
    p = at * 512
    major = u(fh, p + 4, 4)
    if major == 1:
        chunk = u(fh, p + 88, 4)
        start = u(fh, p + 128, 8)
        size = u(fh, p + 136, 8)
        number = u(fh, p + 160, 4)
        if number >= u(fh, p + 220, 4):
            raise IndexError()
        role = u(fh, p + 256 + 2 * number, 2)
        return {
            "set_uuid": uuid("bytes_le", raw(fh, p + 16, 16)),
            "set_name": raw(fh, p + 32, 32).split(b"\\x00", 1)[0].decode(errors="surrogateescape"),
            "events": u(fh, p + 200, 8), "chunk_size": chunk * 512, "chunk_sectors": chunk,
            "data_offset": start, "data_size": size, "dev_number": number,
            "device_uuid": uuid("bytes_le", raw(fh, p + 168, 16)),
            "raid_disk": None if role > 0xFF00 else role,
            "creation": when(u(fh, p + 64, 8)), "update": when(u(fh, p + 192, 8)),
            "level": u(fh, p + 72, 4, "<", True), "layout": u(fh, p + 76, 4), "raid_disks": u(fh, p + 92, 4),
            "sectors": size, "fh": fh, "offset": start * 512, "size": size * 512,
            "window": runs([(0, size * 512, fh, start * 512)]), "component": u(fh, p + 80, 8),
        }
    if major != 0:
        raise ValueError()
    number = u(fh, p + 3968, 4)
    if number >= 27:
        raise IndexError()
    state = u(fh, p + 512 + 128 * number + 16, 4)
    chunk = u(fh, p + 260, 4)
    return {
        "set_uuid": uuid("bytes_le", raw(fh, p + 20, 4) + raw(fh, p + 52, 12)),
        "set_name": None,
        "events": u(fh, p + 160, 4) * 2**32 + u(fh, p + 156, 4), "chunk_size": chunk, "chunk_sectors": chunk // 512,
        "data_offset": 0, "data_size": at, "dev_number": number, "device_uuid": None,
        "raid_disk": u(fh, p + 512 + 128 * number + 12, 4) if state // 4 % 2 == 1 and state % 2 == 0 else None,
        "creation": when(u(fh, p + 24, 4)), "update": when(u(fh, p + 128, 4)),
        "level": u(fh, p + 28, 4, "<", True), "layout": u(fh, p + 256, 4), "raid_disks": u(fh, p + 40, 4),
        "sectors": at, "fh": fh, "offset": 0, "size": at * 512,
        "window": runs([(0, at * 512, fh, 0)]), "component": u(fh, p + 32, 4),
    }
'''


def _ssize(rng):
    return rng.choice((512 * 128 * rng.randint(2, 40) + rng.randrange(65536), 65536 * rng.randint(2, 9), 512 * 1000 + rng.randrange(5000), 8192, 4096, 20000))


DOMAINS = {"@ssize": _ssize}
PAIRS = {"member": {"samples": 600, "budget": 60}}
