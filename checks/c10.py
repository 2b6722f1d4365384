"""C10: RAID10."""
from checks.common import PULL, RAID

EXPLAIN = "The recurrence of RAID10 reads is compared with a specification of the placement of the first copy of each stripe."

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
from vfa import u, raw


def code_read(size: int, near: int, far: int, mode: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int):
    layout = near + 256 * far + 65536 * mode
    s = VirtualDisk("n", "u", size, 10, layout, stripe_size, num_disks, disk_map).open()
    return {"size": s.size, "bytes": pull(s, offset, length)}


def ref_read(size: int, near: int, far: int, mode: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int):
    if mode // 2 > 2:
        raise ValueError()
    out = []
    while length > 0:
        within = offset % stripe_size
        n = min(length, stripe_size - within)
        slot = offset // stripe_size * near
        row = slot // num_disks
        if mode % 2 == 1:
            row = row * far
        start, d = disk_map[slot % num_disks]
        out.append(raw(d.fh, d.offset + start + row * stripe_size + within, n))
        offset += n
        length -= n
    return {"size": size, "bytes": b"".join(out)}
''' + PULL

DOMAINS = dict(RAID, near=[1, 2, 2, 3, 255], far=[1, 1, 2, 3], mode=[0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 9])
PAIRS = {"read": {"samples": 400, "budget": 60}}
