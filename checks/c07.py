"""C07: linear sets."""
from checks.common import RAID

EXPLAIN = "The byte map a linear set is assembled to is compared with the concatenation of the members' data areas in role order."

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
from dissect.volume.raid.stream import Level
from dissect.volume.exceptions import RAIDError
from vfa import u, raw, runs, window


def code_linear(size: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]]):
    vd = VirtualDisk("n", "u", size, -1, layout, stripe_size, num_disks, disk_map)
    return runs(vd.open())


def ref_linear(size: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]]):
    if len(disk_map) != num_disks:
        raise RAIDError()
    at = 0
    out = []
    for role in sorted(disk_map):
        start, d = disk_map[role]
        out.append((at, d.size - start, d.fh, d.offset + start))
        at += d.size - start
    return runs(out)
'''

DOMAINS = RAID | {".size": [5, 8, 100, 1000, 4096, 10**6]}
PAIRS = {"linear": {"samples": 300}}
