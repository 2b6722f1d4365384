"""C08: RAID0."""
from checks.common import PULL, RAID

EXPLAIN = ("The recurrence of RAID0 reads and the strip zones behind it are compared with a specification of the striping over "
           "members of different sizes.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
from dissect.volume.exceptions import RAIDError
from vfa import u, raw


def code_read(size: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int):
    s = VirtualDisk("n", "u", size, 0, layout, stripe_size, num_disks, disk_map).open()
    return {"size": s.size, "bytes": pull(s, offset, length)}


def locate(members, ss, x):
    base = 0
    low = 0
    while True:
        larger = [m for m in members if m[1].size // ss * ss > low]
        if not larger:
            return None, 0
        high = min([m[1].size // ss * ss for m in larger])
        span = (high - low) * len(larger)
        if x < base + span:
            chunk, rest = divmod(x - base, ss)
            start, d = larger[chunk % len(larger)]
            return d, d.offset + start + low + chunk // len(larger) * ss + rest
        base += span
        low = high


def ref_read(size: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int):
    if len(disk_map) != num_disks:
        raise RAIDError()
    members = [disk_map[role] for role in sorted(disk_map)]
    out = []
    while length > 0:
        d, at = locate(members, stripe_size, offset)
        if d is None:
            break
        n = min(length, stripe_size - offset % stripe_size)
        out.append(raw(d.fh, at, n))
        offset += n
        length -= n
    return {"size": size, "bytes": b"".join(out)}
''' + PULL

DOMAINS = RAID
PAIRS = {"read": {"samples": 400, "budget": 60}}
